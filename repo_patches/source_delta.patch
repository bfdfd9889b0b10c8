From b21cab12f68d911ce5793617274d8fac83c43d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 01/26] fix: clearing a single style selection left the old
 index selected too

---
 nion/utils/Selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 7dc5e85..e7ac856 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -77,7 +77,7 @@ class IndexedSelection:
     def clear(self) -> None:
         old_index = copy.copy(self.__indexes)
         if self.selection_style == Style.single:
-            self.__indexes.add(0)
+            self.__indexes = {0}
             self.__anchor_index = 0
         else:
             self.__indexes = set()
-- 
2.43.0


From 92141c18f7ef0b5e8c032ec35cb155e820c48d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 02/26] fix: selection anchor stayed at an index that had been
 removed

---
 nion/utils/Selection.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index e7ac856..a994f57 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -86,9 +86,7 @@ class IndexedSelection:
             self.__changed_event.fire()
 
     def __update_anchor_index(self) -> None:
-        for index in self.__indexes:
-            if self.__anchor_index is None or index < self.__anchor_index:
-                self.__anchor_index = index
+        self.__anchor_index = min(self.__indexes) if self.__indexes else None
 
     def add(self, index: int) -> None:
         assert isinstance(index, numbers.Integral)
@@ -196,10 +194,10 @@ class IndexedSelection:
                     new_indexes.add(index - 1)
                 else:
                     new_indexes.add(index)
+        if self.__indexes != new_indexes:
+            self.__indexes = new_indexes
         if self.__anchor_index is not None:
             if remove_index == self.__anchor_index:
                 self.__update_anchor_index()
             elif remove_index < self.__anchor_index:
                 self.__anchor_index -= 1
-        if self.__indexes != new_indexes:
-            self.__indexes = new_indexes
-- 
2.43.0


From 267f861cf3465c3893361065b15e0e71d0681b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 03/26] fix: closed listeners and missing listeners made
 Event.fire_all report failure

---
 nion/utils/Event.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 104f800..4e77b15 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -36,6 +36,10 @@ class EventListener:
             pass
         self.call = void
 
+    @property
+    def is_open(self) -> bool:
+        return callable(self.__listener_fn)
+
     def __enter__(self):
         return self
 
@@ -127,6 +131,8 @@ class Event:
                 return False
             except Exception as e:
                 self.__print_event_exception(listener)
+        else:
+            return False
 
     def fire_all(self, *args, **keywords):
         """Calls listeners (in order added) until one returns False or else return True."""
@@ -136,9 +142,11 @@ class Event:
                 with self.__weak_listeners_mutex:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
-                    if listener:
+                    if listener and listener.is_open:
                         if not listener.call(*args, **keywords):
                             return False
                 return True
             except Exception as e:
                 self.__print_event_exception(listener)
+        else:
+            return True
-- 
2.43.0


From a9ad625c567243e79a468114db9794a826e438c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 04/26] fix: get_component ignored priority

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 79279bf..ccd5a50 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -93,7 +93,7 @@ def get_component(component_type: str) -> typing.Optional[typing.Any]:
     sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)
 
     if len(sorted_components) > 0:
-        return tuple(components)[0]
+        return sorted_components[0]
 
     return None
 
-- 
2.43.0


From de3637176cd46edcffab11821d1ca54333568232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 05/26] fix: unregistering a component for all its types
 announced an empty set of types

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index ccd5a50..194c0cb 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -60,7 +60,7 @@ class ComponentManager(metaclass=Singleton):
         self.component_registered_event.fire(component, component_types)
 
     def unregister(self, component, component_types: typing.Set[str] = None) -> None:
-        component_types = component_types if component_types is not None else self.__component_types[component]
+        component_types = component_types if component_types is not None else set(self.__component_types[component])
         for component_type in component_types:
             assert component in self.__components_by_type.get(component_type, set())
         for component_type in component_types:
-- 
2.43.0


From 268ae98a3b08913f203a3684fe122ae6ea2f6c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 06/26] fix: flattened list shifted selections at the child's
 own index

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7ad5f4b..e596be0 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -899,7 +899,7 @@ class FlattenedListModel(Observable.Observable):
             self.__items.insert(master_index, item)
             self.notify_insert_item(self.__items_key, item, master_index)
             for selection in self.__selections:
-                selection.insert_index(before_index)
+                selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-- 
2.43.0


From 09628d53930a17c16a47f8fd7e7b1cd483cedeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 07/26] fix: filtered list announced the wrong item when
 replacing all items

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index e596be0..868804a 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -533,7 +533,7 @@ class FilteredListModel(Observable.Observable):
                     self.__insert_item(item, sort_key)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
-                for item in old_items:
+                for item in reversed(old_items):
                     # remove all items
                     self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
-- 
2.43.0


From 2143e5623fa4f6c2ba81b0ff659664bc3440cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 08/26] fix: filtered list did not move an item whose sort key
 changed

---
 nion/utils/ListModel.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 868804a..652c9dc 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -440,19 +440,17 @@ class FilteredListModel(Observable.Observable):
                 if sort_key is not None:
                     # are items sorted?
                     sort_operator = operator.gt if self.sort_reverse else operator.lt
-                    before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                     if item in items:
-                        # item already in list?
+                        # item already in list? its sort key may have changed, so search only the other (sorted) items.
                         index = items.index(item)
-                        if before_index < index:
+                        other_items = items[:index] + items[index + 1:]
+                        before_index = self.__find_sorted_index_for_item(item, other_items, sort_key, sort_operator)
+                        if before_index != index:
                             self.__removed_master_item(index, item)
                             self.__inserted_master_item(before_index, item)
-                        elif before_index > index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index - 1, item)
                     else:
-                        # item is not in list, just insert
-                        self.__inserted_master_item(before_index, item)
+                        # item is not in list, just insert. the before_index we pass will not be used so just pass 0
+                        self.__inserted_master_item(0, item)
                 else:
                     # items are not sorted
                     if not item in items:
-- 
2.43.0


From 680552a674c1df197e9d044e1f7d4dc0bc582ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 09/26] fix: filtered list kept the old order of items
 rearranged within a change block

---
 nion/utils/ListModel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 652c9dc..3ab2ae4 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -509,13 +509,15 @@ class FilteredListModel(Observable.Observable):
             # import time
             # t0 = time.perf_counter()
             self.begin_changes_event.fire(self.__items_key)
-            if self.__items_sorted:
+            old_items_set = set(old_items)
+            new_items_set = set(items)
+            # items which stay may have been rearranged; they must be in the proper order to insert using sorting.
+            items_ordered = [item for item in old_items if item in new_items_set] == [item for item in items if item in old_items_set]
+            if self.__items_sorted and items_ordered:
                 sort_key = self.sort_key
                 if not sort_key:
                     indexes = {item: index for index, item in enumerate(items)}
                     sort_key = lambda x: indexes[x]
-                old_items_set = set(old_items)
-                new_items_set = set(items)
                 insert_items_set = new_items_set - old_items_set
                 remove_items_set = old_items_set - new_items_set
                 items_removed = 0
-- 
2.43.0


From 4c355c2ee5114f09e832fb4a0d97aa1394934096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 10/26] fix: filtered list misplaced items when sort_reverse is
 set without a sort key

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 3ab2ae4..238020a 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -396,7 +396,7 @@ class FilteredListModel(Observable.Observable):
     def __insert_item(self, item, sort_key) -> None:
         items = self.__items
         if sort_key is not None:
-            sort_operator = operator.gt if self.sort_reverse else operator.lt
+            sort_operator = operator.gt if self.sort_key and self.sort_reverse else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
             before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
-- 
2.43.0


From 073a5e9c651479eb7126ce4fa249a3427f28d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 11/26] fix: copies of a text filter could not be used

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 238020a..9bda91d 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -177,6 +177,7 @@ class TextFilter(Filter):
         result = super().__deepcopy__(memo)
         result.__key = self.__key
         result.__text = self.__text
+        result.__lower_text = self.__lower_text
         return result
 
     def matches(self, d) -> bool:
-- 
2.43.0


From 52412150e13bfd668b6eea818eac24d7a74a0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 12/26] fix: clearing a property with its own storage key left
 the stored value

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7f76fe1..df59313 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -594,7 +594,7 @@ class PersistentObject:
                 for property_key in properties:
                     self.persistent_object_context.property_changed(self, property_key, properties[property_key])
             else:
-                self.persistent_object_context.clear_property(self, name)
+                self.persistent_object_context.clear_property(self, property.key)
 
     def __update_modified(self, modified):
         self.__modified_count += 1
-- 
2.43.0


From 3c8fcbce6f599ea0aa48abcba501e1970f6b5e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 13/26] fix: subscribing without a registered callback failed
 for registered objects

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index df59313..b6d6a90 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -222,7 +222,7 @@ class PersistentObjectContext:
         self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
         weak_object = self.__objects.get(object_uuid)
         object = weak_object and weak_object()
-        if object is not None:
+        if object is not None and registered:
             registered(object)
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
-- 
2.43.0


From e02003d145b81c96cc81d02fbe3ec42b4aa81f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 14/26] fix: persistent objects with hidden items could not be
 copied

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index b6d6a90..68f0fa9 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -393,7 +393,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key)))
+            self.set_item(key, copy.deepcopy(item.get_item(key)))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From e3089db345573bc73c7e4c0d3a18ff918a4aeece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 15/26] fix: float fields could not be built

---
 nion/utils/StructuredModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 851f601..f959f82 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -62,10 +62,10 @@ def define_array(items: MDescription) -> MDescription:
 
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
@@ -76,10 +76,10 @@ def build_model(schema: MDescription, *, default_value=None, value=None):
 
 
 def build_value(schema: MDescription, *, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return value
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return value
     elif type == "record":
         return RecordModel(schema, values=value)
-- 
2.43.0


From 3ffd62022aa424c064a479bb4e565aa1015b93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 16/26] fix: default of a field took precedence over the given
 value

---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index f959f82..e8580fc 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -63,10 +63,10 @@ def define_array(items: MDescription) -> MDescription:
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
     if schema in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
     if type in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
         record_values.update(value or dict())
-- 
2.43.0


From e99ddddd4dcae7044fe9e2b81b1fd0a9016d8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 17/26] fix: removing an array item could disconnect another
 item's change notification

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index e8580fc..56f715c 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -297,7 +297,7 @@ class ArrayModel(ListModelModule.ListModel):
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
-        self.__model_changed_listeners.append(trampoline)
+        self.__model_changed_listeners.insert(before_index, trampoline)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-- 
2.43.0


From 16a024bb5dfda5e8cf658ad557296d50e6db6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 18/26] fix: array models could not be closed

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 56f715c..c1ab74c 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -258,7 +258,7 @@ class ArrayModel(ListModelModule.ListModel):
             self.__model_changed_listeners.append(trampoline)
 
     def close(self):
-        for index, item in enumerate(self.items()):
+        for index, item in enumerate(self.items):
             trampoline = self.__model_changed_listeners[index]
             if trampoline:
                 trampoline.close()
-- 
2.43.0


From d2efe6178bdea4a2a262f59fd400f3fff414d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 19/26] fix: membership test on an array field failed

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index c1ab74c..e69969b 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -226,7 +226,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         self.__list_model.remove_item(key)
 
     def __contains__(self, item):
-        return self.__list_model.items.contains(item)
+        return item in self.__list_model.items
 
     def insert(self, index, value):
         self.__list_model.insert_item(index, value)
-- 
2.43.0


From 6e33f768b6fbdc6c38d78db1dcd6711145a9ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 20/26] fix: arrays of simple values could not be copied and
 copying into an array bypassed notification

---
 nion/utils/StructuredModel.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index e69969b..7acd746 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -273,18 +273,21 @@ class ArrayModel(ListModelModule.ListModel):
         self.from_dict_value(array.to_dict_value())
 
     def from_dict_value(self, values):
-        while len(values) > len(self.items):
-            item_schema = self.schema["items"]
-            self.items.append(build_value(item_schema))
         while len(values) < len(self.items):
-            del self.items[-1]
-        for value, item in zip(values, self.items):
-            item.from_dict_value(value)
+            self.remove_item(len(self.items) - 1)
+        for index, value in enumerate(values):
+            if index == len(self.items):
+                self.append_item(build_value(self.schema["items"], value=value))
+            elif isinstance(self.items[index], (RecordModel, ArrayModel)):
+                self.items[index].from_dict_value(value)
+            elif self.items[index] != value:
+                self.remove_item(index)
+                self.insert_item(index, value)
 
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
         for item in self.items:
-            l.append(item.to_dict_value())
+            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
         return l
 
     @property
-- 
2.43.0


From a5cd8c5abf92e23c2ef126add9ad45e36eaf5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 21/26] fix: first sample of a sample stream was None instead
 of the input value

---
 nion/utils/Stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 1edc69c..bfdc4c5 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -193,7 +193,7 @@ class SampleStream(AbstractStream):
         self.__input_stream = input_stream.add_ref()
         self.__period = period
         self.__last_time = 0
-        self.__pending_value = None
+        self.__pending_value = input_stream.value
         self.__value = None
         self.__listener = input_stream.value_stream.listen(self.__value_changed)
         self.__value = input_stream.value
-- 
2.43.0


From 7f160eabcb6f562af720b66789fcefa6acef4afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 22/26] fix: pretty number just below a power of ten less than
 ten collapsed to zero

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 90d1ae6..9596894 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -29,7 +29,7 @@ def make_pretty(val, rounding):
     val_norm = abs(val) / factor10  # between 1 and 10
     if val_norm < 1.0:
         val_norm = val_norm * 10
-        factor10 = factor10 // 10
+        factor10 = factor10 / 10
     if rounding:
         if val_norm < 1.5:
             val_norm = 1.0
-- 
2.43.0


From 02a5ae4ad4aeaf114d6f0057c963ada6639c2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 23/26] fix: a pool task cancelled from its own function was
 finished twice

---
 nion/utils/ThreadPool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index afbd87b..a3f86ab 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -109,15 +109,16 @@ class ThreadPoolTask(object):
         # logging.debug("Task execute - %s %s", self, self.__description)
         with self.__lock:
             # logging.debug("Task execute + %s", self)
-            if self.__fn:
+            fn = self.__fn
+            self.__fn = None
+            if fn:
                 try:
-                    self.__fn()
+                    fn()
                 except Exception as e:
                     import traceback
                     logging.debug("Task thread exception %s", e)
                     traceback.print_exc()
                     traceback.print_stack()
-                self.__fn = None
                 self.__finished_fn(self)
             # logging.debug("Task execute ++ %s", self)
 
-- 
2.43.0


From a99823399796cb7f492b94448e20c4daac3606c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:16 +0000
Subject: [PATCH 24/26] fix: releasing a selection detached another selection
 that selected the same

---
 nion/utils/ListModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 9bda91d..24bc0a9 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -606,7 +606,8 @@ class FilteredListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections compare equal when they select the same; release this one
+        del self.__selections[[s is selection for s in self.__selections].index(True)]
 
     # thread safe.
     def __item_inserted(self, key, item, before_index):
@@ -764,7 +765,8 @@ class MappedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections compare equal when they select the same; release this one
+        del self.__selections[[s is selection for s in self.__selections].index(True)]
 
     # thread safe.
     def __master_item_inserted(self, key, item, before_index):
@@ -856,7 +858,8 @@ class FlattenedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections compare equal when they select the same; release this one
+        del self.__selections[[s is selection for s in self.__selections].index(True)]
 
     # almost thread safe. assumes child items will not change duing this call.
     def __master_item_inserted(self, key, item, before_index):
-- 
2.43.0


From 4d8b75a91df861661ecdb20e9b71351b6d0cbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:56 +0000
Subject: [PATCH 25/26] fix: a debounce stream loses a value that arrives while
 the previous one is sent

The period is over when the value is sent, but the task was still recorded, so
an arrival from a listener did not start a new period and was never sent.
---
 nion/utils/Stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index bfdc4c5..02e5a71 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -168,9 +168,10 @@ class DebounceStream(AbstractStream):
     async def debounce_delay(self) -> None:
         try:
             await asyncio.sleep(self.__period)
-            self.value_stream.fire(self.__value)
         finally:
+            # the period is over: a value arriving from now on (even while firing) starts a new one
             self.__debounce_task = None
+        self.value_stream.fire(self.__value)
 
     def __value_changed(self, value):
         self.__value = value
-- 
2.43.0


From 6fed25a6e4336d4b3eb38f446719920db013bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:06 +0000
Subject: [PATCH 26/26] fix: subscribers added while an object is registered
 were told twice

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 68f0fa9..2f86a5c 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -184,7 +184,7 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = weakref.ref(object)
         self.__objects[object_uuid] = weak_object
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
+        for registered, unregistered in list(self.__subscriptions.get(object_uuid, list())):
             if registered:
                 registered(object)
         self.registration_event.fire(object, None)
-- 
2.43.0

