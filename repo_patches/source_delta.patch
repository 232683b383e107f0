From ceaf7496fadf331d6f23cb8bd88e4d751d60bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 01/39] fix: detach a deleted node from all its parents

_remove_node iterated over node.parents while _destroy_relationship was
removing from it, so every other parent kept the deleted node as a child.
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f2b3548..974998c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,7 +235,7 @@ class MainTree(object):
         node = self.nodes[node_id]
 
         # Handle parents
-        for parent_id in node.parents:
+        for parent_id in list(node.parents):
             self._destroy_relationship(parent_id, node_id)
             self._callback('node-modified', parent_id)
 
-- 
2.43.0


From 33f95bb68aeffb071a33a20c61cd7bfc8c47f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:39 +0000
Subject: [PATCH 02/39] fix: moving a node dismisses all its other parents or
 changes nothing

set_parent iterated over self.parents while remove_parent was removing from
it, so some parents were kept, and a refused (circular) move had already lost
the previous parents.
---
 liblarch/treenode.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index cc26dcd..e93b36e 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -90,7 +90,6 @@ class _Node(object):
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
-            is_already_parent_flag = False
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
@@ -101,14 +100,14 @@ class _Node(object):
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
-                    # First we remove all the other parents
-                    for node_id in self.parents:
+                    # Build the new relationship first so nothing is changed
+                    # when it is refused (circular relationship)
+                    if parent_id and parent_id not in self.parents:
+                        self.add_parent(parent_id)
+                    # Then we remove all the other parents
+                    for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
-                        else:
-                            is_already_parent_flag = True
-                    if parent_id and not is_already_parent_flag:
-                        self.add_parent(parent_id)
 
     def remove_parent(self, parent_id):
         """ Remove parent """
-- 
2.43.0


From b29d5cffa1cb1dff1de40361f1c16c43ad0f05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:23 +0000
Subject: [PATCH 03/39] fix: refuse adding a node below itself before changing
 the tree

The circular check was done after the node was stored and its pending
relationships were built, which left it in the tree without being under any
parent or the root and without any callback.
---
 liblarch/tree.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 974998c..07176c3 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -159,6 +159,19 @@ class MainTree(object):
             print("Error: Node '%s' already exists" % node_id)
             return False
 
+        # Refuse the node before anything is changed if it would end up
+        # below itself (its parent is one of its pending children)
+        if parent_id is not None:
+            pending = self.pending_relationships + node.pending_relationships
+            below = [child_id for rel_parent_id, child_id in pending
+                     if rel_parent_id == node_id and child_id in self.nodes]
+            if parent_id == node_id or any(
+                    self._is_circular_relation(parent_id, child_id)
+                    for child_id in below):
+                raise Exception(
+                    'Creating circular relationship between {} and {}'.format(
+                        parent_id, node_id))
+
         _Node._set_tree(node, self)
         for relationship in node.pending_relationships:
             if relationship not in self.pending_relationships:
@@ -197,10 +210,6 @@ class MainTree(object):
 
         # Build relationship with given parent
         if parent_id is not None:
-            if self._is_circular_relation(parent_id, node_id):
-                raise Exception(
-                    'Creating circular relationship between {} and {}'.format(
-                        parent_id, node_id))
             if parent_id in self.nodes:
                 self._create_relationship(parent_id, node_id)
                 add_to_root = False
-- 
2.43.0


From c3d007d24803f0bfe69f5fdd627a3159b4b144ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 04/39] fix: adding a node respects disabled parents and
 children

Relationships given on insertion or declared before the nodes existed were
built even if one of the nodes had its parents or children disabled.
---
 liblarch/tree.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 07176c3..00919ac 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -148,6 +148,11 @@ class MainTree(object):
 
         return False
 
+    def _is_allowed_relation(self, parent_id, child_id):
+        """ Do both nodes accept the relation? """
+        return (self.nodes[parent_id].has_children_enabled() and
+                self.nodes[child_id].has_parents_enabled())
+
     def _add_node(self, node, parent_id):
         """ Add a node to the tree
 
@@ -164,7 +169,9 @@ class MainTree(object):
         if parent_id is not None:
             pending = self.pending_relationships + node.pending_relationships
             below = [child_id for rel_parent_id, child_id in pending
-                     if rel_parent_id == node_id and child_id in self.nodes]
+                     if rel_parent_id == node_id and child_id in self.nodes and
+                     node.has_children_enabled() and
+                     self.nodes[child_id].has_parents_enabled()]
             if parent_id == node_id or any(
                     self._is_circular_relation(parent_id, child_id)
                     for child_id in below):
@@ -188,7 +195,9 @@ class MainTree(object):
         for rel_parent_id, rel_child_id in list(self.pending_relationships):
             # Adding as a child
             if rel_child_id == node_id and rel_parent_id in self.nodes:
-                if not self._is_circular_relation(rel_parent_id, node_id):
+                if not self._is_allowed_relation(rel_parent_id, node_id):
+                    pass
+                elif not self._is_circular_relation(rel_parent_id, node_id):
                     self._create_relationship(rel_parent_id, node_id)
                     add_to_root = False
                     parents_to_refresh.append(rel_parent_id)
@@ -200,7 +209,9 @@ class MainTree(object):
 
             # Adding as a parent
             if rel_parent_id == node_id and rel_child_id in self.nodes:
-                if not self._is_circular_relation(node_id, rel_child_id):
+                if not self._is_allowed_relation(node_id, rel_child_id):
+                    pass
+                elif not self._is_circular_relation(node_id, rel_child_id):
                     self._create_relationship(node_id, rel_child_id)
                     children_to_refresh.append(rel_child_id)
                 else:
@@ -211,9 +222,10 @@ class MainTree(object):
         # Build relationship with given parent
         if parent_id is not None:
             if parent_id in self.nodes:
-                self._create_relationship(parent_id, node_id)
-                add_to_root = False
-                parents_to_refresh.append(parent_id)
+                if self._is_allowed_relation(parent_id, node_id):
+                    self._create_relationship(parent_id, node_id)
+                    add_to_root = False
+                    parents_to_refresh.append(parent_id)
             else:
                 self.pending_relationships.append((parent_id, node_id))
 
-- 
2.43.0


From 886c014c6548d0cce2ea173980f4f7480d50732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:35 +0000
Subject: [PATCH 05/39] fix: keep a view coherent while a node disappears from
 it

The children of a node leaving a view were updated, and listeners called,
while the node was only half removed: paths of other nodes could not be
computed and parents not displayed yet missed the change.
---
 liblarch/filteredtree.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 79c57e0..df0d4e5 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -236,23 +236,26 @@ class FilteredTree(object):
             for child_id in children:
                 self.send_remove_tree(child_id, node_id)
                 self.nodes[child_id]['parents'].remove(node_id)
-                self.__update_node(child_id, direction="down")
 
+            # Remove node from cache
             node = self.nodes.pop(node_id)
+            for parent_id in node['parents']:
+                self.nodes[parent_id]['children'].remove(node_id)
+
             for path in paths:
                 self.callback(action, node_id, path)
 
-            # Remove node from cache
+            for child_id in children:
+                self.__update_node(child_id, direction="down")
             for parent_id in node['parents']:
-                self.nodes[parent_id]['children'].remove(node_id)
                 self.__update_node(parent_id, direction="up")
 
             # We update parents who are not displayed
             # If the node is only hidden and still exists in the tree
             if self.tree.has_node(node_id):
-                node = self.tree.get_node(node_id)
-                for parent in node.get_parents():
-                    if parent not in self.nodes:
+                tree_node = self.tree.get_node(node_id)
+                for parent in tree_node.get_parents():
+                    if parent not in node['parents']:
                         self.__update_node(parent, direction="up")
 
         return completely_updated
-- 
2.43.0


From f807f3a712c5a0e4a570132202d410e3bdd24a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:46 +0000
Subject: [PATCH 06/39] fix: update both ends of a displayed relationship
 together

The parents of a node were stored before the children of those parents, and
the parents were updated in between, so listeners could get exceptions when
asking for paths, nested updates worked with half-built relationships, and
the parents which lost or got a child were not always updated.
---
 liblarch/filteredtree.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index df0d4e5..103a10e 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -184,10 +184,6 @@ class FilteredTree(object):
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
 
-            self.nodes[node_id]['parents'] = [
-                parent_id for parent_id in new_parents
-                if parent_id in self.nodes]
-
             remove_from = set(current_parents) - set(new_parents)
             add_to = set(new_parents) - set(current_parents)
             stay = set(new_parents) - set(add_to)
@@ -200,22 +196,29 @@ class FilteredTree(object):
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
-                if direction == "both" or direction == "up":
-                    self.__update_node(parent_id, direction="up")
+                self.nodes[node_id]['parents'].remove(parent_id)
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
                     self.nodes[parent_id]['children'].append(node_id)
+                    self.nodes[node_id]['parents'].append(parent_id)
                     self.send_add_tree(node_id, parent_id)
-                    if direction == "both" or direction == "up":
-                        self.__update_node(parent_id, direction="up")
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
+            # Both sides know about each other now, keep the order of the tree
+            self.nodes[node_id]['parents'] = list(new_parents)
+
+            # We update the parents which lost or got the node. It might come
+            # back to this node, so relationships have to be complete here
+            for parent_id in remove_from | add_to:
+                self.__update_node(parent_id, direction="up")
             # We update all the other parents
             if direction == "both" or direction == "up":
                 for parent_id in stay:
                     self.__update_node(parent_id, direction="up")
+            if not self.is_displayed(node_id):
+                return completely_updated
             # We update the node itself
             # Why should we call the callback only for modify?
             if action == 'modified':
-- 
2.43.0


From d87d75db058554d1fa7b88627d446b3d1d3ea2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 07/39] fix: check hidden parents and new children in a view on
 every change

Filters depending on children were not evaluated again for hidden parents of
a modified node, and a node shown because of its descendants did not adopt
its other displayed children.
---
 liblarch/filteredtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 103a10e..21731ed 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -174,7 +174,7 @@ class FilteredTree(object):
 
             # When using flat filter or a recursive filter, FilteredTree
             # might not recognize a parent correctly, make sure to check them
-            if action == 'added':
+            if action == 'added' or direction == "both" or direction == "up":
                 node = self.tree.get_node(node_id)
                 for parent_id in node.get_parents():
                     if (parent_id not in new_parents and parent_id not in current_parents):
@@ -228,7 +228,7 @@ class FilteredTree(object):
             # We update the children
             current_children = self.nodes[node_id]['children']
             new_children = self.__node_children(node_id)
-            if direction == "both" or direction == "down":
+            if action == 'added' or direction == "both" or direction == "down":
                 for cid in new_children:
                     if cid not in current_children:
                         self.__update_node(cid, direction="down")
-- 
2.43.0


From 16e42e6cd03dff70aa770a41d133669fb6091a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:24 +0000
Subject: [PATCH 08/39] fix: forget the iterator of a removed row

A new row might be allocated at the address of a removed one. The cached
iterator of the removed row then looks valid and points to another row.
---
 liblarch_gtk/treemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 8481752..77eabcd 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -159,6 +159,8 @@ class TreeModel(Gtk.TreeStore):
         assert actual_node_id == node_id
         self.remove(it)
         self.cache_position.pop(path)
+        # Another row might get the memory of the removed one
+        self.cache_paths.pop(path, None)
 
     def update_task(self, node_id, path):
         """ Update instance of node by rebuilding the row.
-- 
2.43.0


From b955e07e0375159f480ce78deabab1cf6439d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:35 +0000
Subject: [PATCH 09/39] fix: unregister the callback of a view count

---
 liblarch/viewcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 6eeb1cb..caabd89 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -69,8 +69,8 @@ class ViewCount(object):
             self.cllbcks.append(func)
 
     def unregister_cllbck(self, func):
-        if func in self.cllbacks:
-            self.cllbacks.remove(func)
+        if func in self.cllbcks:
+            self.cllbcks.remove(func)
 
     def get_n_nodes(self):
         return len(self.nodes)
-- 
2.43.0


From c9ef94efe8267767b8a5705acbdffe35d5e51384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 10/39] fix: survive removing a filter which is applied to a
 view count

Every later change of the tree raised an exception.
---
 liblarch/viewcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index caabd89..9337a0e 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -83,7 +83,8 @@ class ViewCount(object):
         displayed = True
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
-            displayed &= filt.is_displayed(nid)
+            # As in a view, nothing passes a filter which is not in the bank
+            displayed &= bool(filt and filt.is_displayed(nid))
         if displayed:
             self.__add(nid)
         else:
-- 
2.43.0


From 54ea4de4fbba6812e2694f0760f5b9b105ed706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:55 +0000
Subject: [PATCH 11/39] fix: a failing queued request does not stop the queue

GLib removes an idle source whose callback raises an exception, while the
queue believed it was still there and never processed the other requests.
---
 liblarch/processqueue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 1e9baac..1799577 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -18,6 +18,7 @@
 # -----------------------------------------------------------------------------
 
 import threading
+import traceback
 
 from gi.repository import GObject
 
@@ -42,7 +43,11 @@ class SyncQueue(object):
         """ Process requests from queue """
         for action in self.process():
             func = action[0]
-            func(*action[1:])
+            # A failing request must not stop processing of the other ones
+            try:
+                func(*action[1:])
+            except Exception:
+                traceback.print_exc()
         # return True to process other requests as well
         return True
 
-- 
2.43.0


From 64dc79c54bc539d0e95e3e0361b18b2ace853168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 12/39] fix: nodes may be called like events of a view

Actions queued for a node were stored together with the callbacks of events,
so a node called 'added', 'deleted' or 'modified' broke the view.
---
 liblarch/filteredtree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 21731ed..e536e13 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -49,6 +49,8 @@ class FilteredTree(object):
         """
 
         self.cllbcks = {}
+        # Callbacks waiting for a node to be displayed
+        self.runonce_cllbcks = {}
 
         # Cache
         self.nodes = {}
@@ -90,9 +92,9 @@ class FilteredTree(object):
                 # it is essential to idle_add to avoid hard recursion
                 GObject.idle_add(func, param)
             else:
-                if node_id not in self.cllbcks:
-                    self.cllbcks[node_id] = []
-                self.cllbcks[node_id].append([func, node_id, param])
+                if node_id not in self.runonce_cllbcks:
+                    self.runonce_cllbcks[node_id] = []
+                self.runonce_cllbcks[node_id].append([func, node_id, param])
         else:
             self.cllbcks[event] = [func, node_id, param]
 
@@ -109,11 +111,11 @@ class FilteredTree(object):
         The runonce event is actually only run once, when a given task appears.
         """
         if event == 'added':
-            for func, nid, param in self.cllbcks.get(node_id, []):
+            for func, nid, param in self.runonce_cllbcks.get(node_id, []):
                 if nid and self.is_displayed(nid):
                     func(param)
-                    if node_id in self.cllbcks:
-                        self.cllbcks.pop(node_id)
+                    if node_id in self.runonce_cllbcks:
+                        self.runonce_cllbcks.pop(node_id)
                 else:
                     raise Exception(
                         '{} is not displayed but {} was added'.format(
-- 
2.43.0


From a47b0e5477ee2bd75ab418329b806bcd4fa9eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 13/39] fix: update a column even if it has no value any more

A row which e.g. lost its background color kept showing the old one.
---
 liblarch_gtk/treemodel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 77eabcd..fd7542c 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -180,8 +180,7 @@ class TreeModel(Gtk.TreeStore):
             if iterator:
                 for column_num, (__, access_method) in enumerate(self.types):
                     value = access_method(node)
-                    if value is not None:
-                        self.set_value(iterator, column_num, value)
+                    self.set_value(iterator, column_num, value)
 
     def reorder_nodes(self, node_id, path, neworder):
         """ Reorder nodes.
-- 
2.43.0


From 4098d39d7d710aaf46b6a923c83811453f9fb8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:34 +0000
Subject: [PATCH 14/39] fix: a node leaving a view does not list children which
 left it before

Listeners called for its remaining children saw only one end of the
relationships removed already.
---
 liblarch/filteredtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index e536e13..955f859 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -241,6 +241,7 @@ class FilteredTree(object):
             for child_id in children:
                 self.send_remove_tree(child_id, node_id)
                 self.nodes[child_id]['parents'].remove(node_id)
+                self.nodes[node_id]['children'].remove(child_id)
 
             # Remove node from cache
             node = self.nodes.pop(node_id)
-- 
2.43.0


From de319f37a8bfe0bbecdc00ba4dab4855dfd9ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:34 +0000
Subject: [PATCH 15/39] fix: run an action queued for a displayed node only
 once

An action returning a true value was run by the main loop again and again.
---
 liblarch/filteredtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 955f859..08259a6 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -90,7 +90,7 @@ class FilteredTree(object):
                 raise Exception('runonce callback should come with a node_id')
             if self.is_displayed(node_id):
                 # it is essential to idle_add to avoid hard recursion
-                GObject.idle_add(func, param)
+                GObject.idle_add(self.__run_once, func, param)
             else:
                 if node_id not in self.runonce_cllbcks:
                     self.runonce_cllbcks[node_id] = []
@@ -98,6 +98,11 @@ class FilteredTree(object):
         else:
             self.cllbcks[event] = [func, node_id, param]
 
+    def __run_once(self, func, param):
+        """ Run an action in the main loop, whatever it returns """
+        func(param)
+        return False
+
     def callback(self, event, node_id, path, neworder=None):
         """ Run a callback.
 
-- 
2.43.0


From 4026a6390841e455fe1fba1a5acd5d1f6f7e2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 16/39] fix: expand the rows which are displayed when the
 widget is created

expand_all() was called while the model was still empty.
---
 liblarch_gtk/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 927333e..46e1acb 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -192,8 +192,9 @@ class TreeView(Gtk.TreeView):
 
         self.set_model(self.treemodel)
 
-        self.expand_all()
+        # The rows have to be there to be expanded
         self.show()
+        self.expand_all()
 
         self.collapsed_paths = []
         self.connect('row-expanded', self.__emit, 'expanded')
-- 
2.43.0


From 2a351e64f8907a8a449504aaea6d689244af6938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:47 +0000
Subject: [PATCH 17/39] fix: an expanded node is not remembered as collapsed

expand_node() stored the node among the collapsed ones, so it stayed closed
when it got children again.
---
 liblarch_gtk/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 46e1acb..b8d4da9 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -264,7 +264,12 @@ class TreeView(Gtk.TreeView):
             target_path = self.basetreemodel.get_path(iter)
             if self.basetreemodel.get_value(iter, 0) == node_id:
                 collapsing_method(target_path)
-                self.collapsed_paths.append(path)
+                if collapsing_method == self.expand_one_row:
+                    # The node is not collapsed any more
+                    self.collapsed_paths = [
+                        c for c in self.collapsed_paths if c[-1] != node_id]
+                else:
+                    self.collapsed_paths.append(path)
                 schedule_next = False
 
         if schedule_next:
-- 
2.43.0


From 8f39a94b4ddd9b1acad353af9508be9a73f04433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:00 +0000
Subject: [PATCH 18/39] fix: drop every dragged node, not only those whose row
 stayed valid

---
 liblarch_gtk/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index b8d4da9..79aea6d 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -516,7 +516,7 @@ class TreeView(Gtk.TreeView):
         # If there is no selected task (empty selection.data),
         # explicitly skip handling it (set to empty list)
         data = selection.get_data()
-        if data == '':
+        if not data:
             iters = []
         else:
             iters = data.decode().split(',')
@@ -539,10 +539,17 @@ class TreeView(Gtk.TreeView):
                 src_model = Gtk.drag_get_source_widget(context).get_model()
                 dragged_iters.append(src_model.get_iter_from_string(iter))
 
-        for dragged_iter in dragged_iters:
+        # Moving a node changes the rows, iterators might not be valid after it
+        if info == 0:
+            dragged_tids = [model.get_value(dragged_iter, 0)
+                            for dragged_iter in dragged_iters]
+        else:
+            dragged_tids = [src_model.get_value(dragged_iter, 0)
+                            for dragged_iter in dragged_iters]
+
+        for dragged_tid in dragged_tids:
             if info == 0:
-                if dragged_iter and model.iter_is_valid(dragged_iter):
-                    dragged_tid = model.get_value(dragged_iter, 0)
+                if dragged_tid:
                     try:
                         tree.move_node(
                             dragged_tid, new_parent_id=destination_tid)
@@ -551,8 +558,7 @@ class TreeView(Gtk.TreeView):
 
             # Handle inter-widget Drag'n'Drop again (like in the previous loop)
             elif info in self.dnd_external_targets and destination_tid:
-                source = src_model.get_value(dragged_iter, 0)
-                f(source, destination_tid)
+                f(dragged_tid, destination_tid)
 
     # Separators support ##############################################
     def _separator_func(self, model, itera, user_data=None):
-- 
2.43.0


From ee16ddb1db86eba6ea131cdf5c43469b30cf7b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 19/39] fix: sort in a new row without a value in the sort
 column

---
 liblarch_gtk/treemodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index fd7542c..76a4345 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -143,7 +143,12 @@ class TreeModel(Gtk.TreeStore):
 
         iterator = self.my_get_iter(iter_path)
         self.cache_position[path] = self.iter_n_children(iterator)
-        self.insert(iterator, -1, row)
+        new_iter = self.insert(iterator, -1, row)
+
+        # GTK does not sort a row by a column which was not set
+        for column_num, value in enumerate(row):
+            if value is None:
+                self.set_value(new_iter, column_num, value)
 
     def remove_task(self, node_id, path):
         """ Remove instance of node.
-- 
2.43.0


From 574716113fa756811f157641dccf152e330703a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:38 +0000
Subject: [PATCH 20/39] fix: the last request to collapse or expand a node
 counts

---
 liblarch_gtk/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 79aea6d..9df62d2 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -197,6 +197,7 @@ class TreeView(Gtk.TreeView):
         self.expand_all()
 
         self.collapsed_paths = []
+        self.collapse_requests = {}
         self.connect('row-expanded', self.__emit, 'expanded')
         self.connect('row-collapsed', self.__emit, 'collapsed')
         self.treemodel.connect('row-has-child-toggled', self.on_child_toggled)
@@ -255,6 +256,10 @@ class TreeView(Gtk.TreeView):
         if not node_id:
             raise Exception('Missing node_id in path %s' % str(llpath))
 
+        # Only the last request for a node counts
+        request = (llpath, collapsing_method)
+        self.collapse_requests[node_id] = request
+
         schedule_next = True
         for path in self.basetree.get_paths_for_node(node_id):
             iter = self.basetreemodel.my_get_iter(path)
@@ -274,15 +279,16 @@ class TreeView(Gtk.TreeView):
 
         if schedule_next:
             self.basetree.queue_action(
-                node_id, self._collapse_node_retry,
-                param=(llpath, collapsing_method))
+                node_id, self._collapse_node_retry, param=request)
 
     def _collapse_node_retry(self, param):
         """
         Node to be collapsed/expand found, so re-try now with correct
         and preserved parameters.
         """
-        self.collapse_node(param[0], collapsing_method=param[1])
+        node_id = param[0][-1].strip("'")
+        if self.collapse_requests[node_id] is param:
+            self.collapse_node(param[0], collapsing_method=param[1])
 
     def show(self):
         """ Shows the TreeView and connect basetreemodel to LibLarch """
-- 
2.43.0


From 2def76abc03a7d8ce5f3270cf06878bb866f9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 21/39] fix: keep the filters of a view when apply_filter
 refuses

apply_filter with reset and parameters for an unknown filter raised
ValueError after the applied filters were forgotten, while the view still
showed what they accept.
---
 liblarch/filteredtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 08259a6..65be78b 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -620,9 +620,6 @@ class FilteredTree(object):
                 (performance optimization)
         """
         should_refilter = False
-        if reset:
-            self.applied_filters = []
-
         if parameters:
             filt = self.fbank.get_filter(filter_name)
             if filt:
@@ -632,6 +629,9 @@ class FilteredTree(object):
                 raise ValueError(
                     "No filter of name {} in the bank".format(filter_name))
 
+        if reset:
+            self.applied_filters = []
+
         if filter_name not in self.applied_filters:
             self.applied_filters.append(filter_name)
             should_refilter = True
-- 
2.43.0


From 0d4210720cbe6af65a062831274afff7a9c7af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:43 +0000
Subject: [PATCH 22/39] fix: nothing passes an unknown extra filter

get_nodes and get_n_nodes ignored extra filters which are not in the bank
although applying such a filter to the view displays nothing.
---
 liblarch/filteredtree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 65be78b..f4e0e18 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -510,8 +510,10 @@ class FilteredTree(object):
             filters = []
             for filter_name in withfilters:
                 filt = self.fbank.get_filter(filter_name)
-                if filt:
-                    filters.append(filt)
+                if not filt:
+                    # As in a view, nothing passes an unknown filter
+                    return []
+                filters.append(filt)
 
             nodes = []
             for node_id in self.nodes:
-- 
2.43.0


From e3b2275560deb0bbbe8836e2c0cb8a9242584d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:53 +0000
Subject: [PATCH 23/39] fix: filters with a name beginning with ! can be added

They raised UnboundLocalError, a rest of a removed feature.
---
 liblarch/filters_bank.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/liblarch/filters_bank.py b/liblarch/filters_bank.py
index 8bbd9ab..16484c5 100644
--- a/liblarch/filters_bank.py
+++ b/liblarch/filters_bank.py
@@ -102,11 +102,8 @@ class FiltersBank(object):
         Return False if the filter_name was already in the bank
         """
         if filter_name not in self.list_filters():
-            if filter_name.startswith('!'):
-                filter_name = filter_name[1:]
-            else:
-                filter_obj = Filter(filter_func, self.tree)
-                filter_obj.set_parameters(parameters)
+            filter_obj = Filter(filter_func, self.tree)
+            filter_obj.set_parameters(parameters)
             self.custom_filters[filter_name] = filter_obj
             return True
         else:
-- 
2.43.0


From abf2060b2cf4d2993e3673c07e7614c8b094680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 24/39] fix: visit every ancestor once when looking for
 circular relations

The list of visited nodes was never filled, so the search went over every
path and did not end in reasonable time with many shared parents.
---
 liblarch/tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 00919ac..85f103d 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -144,6 +144,7 @@ class MainTree(object):
 
             for ancestor_id in self.nodes[node_id].parents:
                 if ancestor_id not in visited:
+                    visited.append(ancestor_id)
                     ancestors.append(ancestor_id)
 
         return False
-- 
2.43.0


From ed19deb29fdc105071974e5965f135bbf8dcb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:14 +0000
Subject: [PATCH 25/39] fix: relations requested from other threads wait for
 the main loop

remove_parent (and so move_node) and add_child changed one end of the
relation at once, before the queued request was processed.
---
 liblarch/tree.py     | 5 +++--
 liblarch/treenode.py | 2 --
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 85f103d..870649c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -329,8 +329,9 @@ class MainTree(object):
         self._destroy_relationship(parent_id, child_id)
 
         # Move to root if beak the last parent
-        if self.nodes[child_id].get_parents() == []:
-            self.root.add_child(child_id)
+        if (self.nodes[child_id].get_parents() == [] and
+                child_id not in self.root.children):
+            self.root.children.append(child_id)
 
         self._callback('node-modified', parent_id)
         self._callback('node-modified', child_id)
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index e93b36e..0e7b438 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -112,7 +112,6 @@ class _Node(object):
     def remove_parent(self, parent_id):
         """ Remove parent """
         if self.parents_enabled and parent_id in self.parents:
-            self.parents.remove(parent_id)
             self.tree.break_relationship(parent_id, self.node_id)
 
     def has_parent(self, parent_id=None):
@@ -164,7 +163,6 @@ class _Node(object):
                 else:
                     child = self.tree.get_node(child_id)
                     if child.has_parents_enabled():
-                        self.children.append(child_id)
                         self.tree.new_relationship(self.node_id, child_id)
             else:
                 print("{} was already in children of {}".format(
-- 
2.43.0


From 1686197e437d413f6459500b2e76528714e548f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 26/39] fix: show the first column when it starts with
 new_column=False

The column was built but never appended to the widget.
---
 liblarch_gtk/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 9df62d2..edb832c 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -140,9 +140,6 @@ class TreeView(Gtk.TreeView):
             # one. It will create columns without borders.
             if desc.get('new_column', True):
                 col = Gtk.TreeViewColumn()
-                newcol = True
-            else:
-                newcol = False
             col.set_visible(visible)
 
             if 'title' in desc:
@@ -156,7 +153,7 @@ class TreeView(Gtk.TreeView):
             # Allow to set background color
             col.set_cell_data_func(renderer, self._celldatafunction)
 
-            if newcol:
+            if col.get_tree_view() is None:
                 self.append_column(col)
             self.columns[col_name] = (col_num, col)
 
-- 
2.43.0


From 77b5cec4d10f0ce7ca3722c48eacda8d8472ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:57 +0000
Subject: [PATCH 27/39] fix: a column can be sorted by a column which comes
 later

The widget could not be built (KeyError) with such a description.
---
 liblarch_gtk/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index edb832c..e8b078b 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -117,6 +117,7 @@ class TreeView(Gtk.TreeView):
 
         types = []
         sorting_func = []
+        default_sorting = []
         # Build the first column if user starts with new_colum=False
         col = Gtk.TreeViewColumn()
 
@@ -161,13 +162,17 @@ class TreeView(Gtk.TreeView):
                 if 'sorting' in desc:
                     # Just allow sorting and use default comparing
                     self.sort_col = desc['sorting']
-                    sort_num, sort_col = self.columns[self.sort_col]
-                    col.set_sort_column_id(sort_num)
+                    default_sorting.append((col, desc['sorting']))
 
                 if 'sorting_func' in desc:
                     # Use special function for comparing, e.g. dates
                     sorting_func.append((col_num, col, desc['sorting_func']))
 
+        # Columns might be sorted by any other column
+        for col, sort_name in default_sorting:
+            sort_num, sort_col = self.columns[sort_name]
+            col.set_sort_column_id(sort_num)
+
         self.basetree = tree
         # Build the model around LibLarch tree
         self.basetreemodel = TreeModel(tree, types)
-- 
2.43.0


From 02dba147f171154dcf9f8b581ec84bd3f40dee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:07 +0000
Subject: [PATCH 28/39] fix: connecting a model does not duplicate rows of
 other models

All the models of a view got its current state whenever another model was
connected to the view.
---
 liblarch_gtk/treemodel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 76a4345..c6494ec 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -61,8 +61,14 @@ class TreeModel(Gtk.TreeStore):
         self.tree.register_cllbck('node-modified-inview', self.update_task)
         self.tree.register_cllbck('node-children-reordered', self.reorder_nodes)
 
-        # Request the current state
-        self.tree.get_current_state()
+        # Add the current state. Do not request it from the tree because other
+        # models connected to the same tree would get it once again
+        paths = [(node_id, ) for node_id in self.tree.node_all_children()]
+        while paths != []:
+            path = paths.pop(0)
+            self.add_task(path[-1], path)
+            for child_id in self.tree.node_all_children(path[-1]):
+                paths.append(path + (child_id, ))
 
     def my_get_iter(self, path):
         """ Because we sort the TreeStore, paths in the treestore are
-- 
2.43.0


From 30ad3e578260988eac179cb6e64b803c7c185610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:58 +0000
Subject: [PATCH 29/39] fix: showing the widget again does not duplicate its
 rows

TreeView.show() connected the model to the view once more.
---
 liblarch_gtk/treemodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index c6494ec..e25e986 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -37,6 +37,7 @@ class TreeModel(Gtk.TreeStore):
         self.cache_paths = {}
         self.cache_position = {}
         self.tree = tree
+        self.connected = False
 
     def set_column_function(self, column_num, column_func):
         """ Replace function for generating certain column.
@@ -56,6 +57,11 @@ class TreeModel(Gtk.TreeStore):
         Also asks for the current status by providing add_task callback.
         We are able to connect to liblarch tree on the fly. """
 
+        # Connect only once, e.g. when the widget is shown again
+        if self.connected:
+            return
+        self.connected = True
+
         self.tree.register_cllbck('node-added-inview', self.add_task)
         self.tree.register_cllbck('node-deleted-inview', self.remove_task)
         self.tree.register_cllbck('node-modified-inview', self.update_task)
-- 
2.43.0


From 934b05ba3809e0632e8480e5766c6115ef1ee866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:07 +0000
Subject: [PATCH 30/39] fix: update the row of a changed node before placing
 others next to it

When a change of a displayed node made its parent appear, the parent was
inserted while the row of the node was still where its old data belonged,
so rows sorted by a custom function ended up in a wrong order.
---
 liblarch/filteredtree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index f4e0e18..9213596 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -134,6 +134,12 @@ class FilteredTree(object):
 
     # EXTERNAL MODIFICATION ###################################################
     def __external_modify(self, node_id):
+        # The row of a changed node has to be up to date before another node
+        # is placed next to it (rows might be sorted by data of nodes)
+        if self.is_displayed(node_id) and self.__is_displayed(node_id):
+            for path in self.get_paths_for_node(node_id):
+                self.callback("modified", node_id, path)
+
         return self.__update_node(node_id, direction="both")
 
     def __update_node(self, node_id, direction):
-- 
2.43.0


From 2491c8995d9c48fd3aa266e4381f977b6b5262fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 31/39] fix: a view count does not count nodes which are not in
 the tree

---
 liblarch/viewcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 9337a0e..12e0e80 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -80,7 +80,7 @@ class ViewCount(object):
         self.__modify(nid)
 
     def __modify(self, nid):
-        displayed = True
+        displayed = self.tree.has_node(nid)
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
             # As in a view, nothing passes a filter which is not in the bank
-- 
2.43.0


From bda632de11ca51e5aafe4090887bf03244c98cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 32/39] fix: a listener of a view count may unregister itself
 when called

---
 liblarch/viewcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 12e0e80..c0b05e7 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -101,5 +101,5 @@ class ViewCount(object):
             self.__callback()
 
     def __callback(self):
-        for c in self.cllbcks:
+        for c in list(self.cllbcks):
             c()
-- 
2.43.0


From d24d282247d6a4ae541c0773b92080410ec8e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 33/39] fix: do not build a queued relationship which a node
 refuses by now

---
 liblarch/tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 870649c..5802993 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -303,6 +303,10 @@ class MainTree(object):
                 'Cannot build circular relationship between {} and {}'.format(
                     parent_id, child_id))
 
+        # The nodes could have changed since the relation was requested
+        if not self._is_allowed_relation(parent_id, child_id):
+            return False
+
         self._create_relationship(parent_id, child_id)
 
         # Remove from root when having a new relationship
-- 
2.43.0


From af4ee2153828f1e3746dbb976c29fe43279a64e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 34/39] fix: handle each drop once when the name for drags is
 set again

---
 liblarch_gtk/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index e8b078b..e1d2424 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -105,6 +105,7 @@ class TreeView(Gtk.TreeView):
 
         self.dnd_internal_target = ''
         self.dnd_external_targets = {}
+        self.dnd_connected = False
 
         # Sort columns
         self.order_of_column = []
@@ -410,8 +411,11 @@ class TreeView(Gtk.TreeView):
         If ENABLE_SORTING, drag_drop signal must be handled by this widget."""
         self.dnd_internal_target = dndname
         self.__init_dnd()
-        self.connect('drag_data_get', self.on_drag_data_get)
-        self.connect('drag_data_received', self.on_drag_data_received)
+        # When the name is changed, drops must not be handled twice
+        if not self.dnd_connected:
+            self.connect('drag_data_get', self.on_drag_data_get)
+            self.connect('drag_data_received', self.on_drag_data_received)
+            self.dnd_connected = True
 
     def set_dnd_external(self, sourcename, func):
         """ Add a new external target and initialize Drag'n'Drop support"""
-- 
2.43.0


From ea2b0068ad270dd4745635223689cd71af4770ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:48 +0000
Subject: [PATCH 35/39] fix: a path to a node which is not in the tree is not
 valid

---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 5802993..6d072a7 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -362,7 +362,7 @@ class MainTree(object):
         if not path or path == ():
             return None
         node_id = path[-1]
-        if path in self.get_paths_for_node(node_id):
+        if node_id in self.nodes and path in self.get_paths_for_node(node_id):
             return node_id
         else:
             return None
-- 
2.43.0


From 8026b03fbe42c933a19f75094d3b9650d8d17c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:57 +0000
Subject: [PATCH 36/39] fix: actions can be queued in the main view

---
 liblarch/viewtree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index dad50e7..5ec1cd9 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -80,6 +80,9 @@ class ViewTree(object):
                 functools.partial(self.__emit, 'node-children-reordered'))
 
     def queue_action(self, node_id, func, param=None):
+        if not self.__ft:
+            self.__ft = FilteredTree(
+                self.__maintree, self.__fbank, refresh=True)
         self.__ft.set_callback('runonce', func, node_id=node_id, param=param)
 
     def get_basetree(self):
-- 
2.43.0


From 87a27470e2729b0fca66b1e6c11fdd3f692a5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:24 +0000
Subject: [PATCH 37/39] fix: count the nodes of the main view right while its
 listeners are informed

---
 liblarch/viewtree.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index 5ec1cd9..60e9005 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -159,9 +159,8 @@ class ViewTree(object):
         i.e. the currently applied filters are also taken into account
         """
 
-        if not self.__ft:
-            self.__ft = FilteredTree(
-                self.__maintree, self.__fbank, refresh=True)
+        if self.static:
+            return len(self.get_nodes(withfilters=withfilters))
         return self.__ft.get_n_nodes(withfilters=withfilters)
 
     def get_nodes(self, withfilters=[]):
@@ -171,9 +170,14 @@ class ViewTree(object):
         i.e. the currently applied filters are also taken into account
         """
 
-        if not self.__ft:
-            self.__ft = FilteredTree(
-                self.__maintree, self.__fbank, refresh=True)
+        if self.static:
+            # Nothing else is up to date while listeners are informed
+            nodes = self.__maintree.get_all_nodes()
+            for filter_name in withfilters:
+                filt = self.__fbank.get_filter(filter_name)
+                nodes = [node_id for node_id in nodes
+                         if filt and filt.is_displayed(node_id)]
+            return nodes
         return self.__ft.get_nodes(withfilters=withfilters)
 
     def get_node_for_path(self, path):
@@ -220,9 +224,14 @@ class ViewTree(object):
         """ Return quantity of children of node_id.
         If node_id is None, use the root node.
         Every instance of node has the same children"""
-        if not self.__ft:
-            self.__ft = FilteredTree(
-                self.__maintree, self.__fbank, refresh=True)
+        if self.static:
+            # Nothing else is up to date while listeners are informed
+            children = self.node_all_children(node_id)
+            total = len(children)
+            if recursive:
+                for child_id in children:
+                    total += self.node_n_children(child_id, True)
+            return total
         return self.__ft.node_n_children(node_id, recursive)
 
     def node_nth_child(self, node_id, n):
-- 
2.43.0


From a1024cf9507fa97260a1d0a085b7a9d46531540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:56 +0000
Subject: [PATCH 38/39] fix: the main view reports that no filters are applied
 to it

---
 liblarch/viewtree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index 60e9005..c973f2e 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -279,6 +279,9 @@ class ViewTree(object):
 
     # FILTERS #################################################################
     def list_applied_filters(self):
+        if self.static:
+            # There are never filters on the main view
+            return []
         return self.__ft.list_applied_filters()
 
     def apply_filter(self, filter_name, parameters=None,
-- 
2.43.0


From 954e546f21ab5ad698c7fbca8a5ff8897611b964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 39/39] fix: a moved node does not wait for its former parents
 any more

---
 liblarch/treenode.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 0e7b438..648f135 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -91,8 +91,10 @@ class _Node(object):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
             if not self.tree:
+                self._forget_pending_parents(self)
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
+                self._forget_pending_parents(self.tree)
                 for p in self.get_parents():
                     self.tree.break_relationship(p, self.get_id())
                 self.tree.pending_relationships.append(
@@ -105,10 +107,17 @@ class _Node(object):
                     if parent_id and parent_id not in self.parents:
                         self.add_parent(parent_id)
                     # Then we remove all the other parents
+                    self._forget_pending_parents(self.tree)
                     for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
 
+    def _forget_pending_parents(self, owner):
+        """ Do not wait any more for parents which are not there yet """
+        for relationship in list(owner.pending_relationships):
+            if relationship[1] == self.get_id():
+                owner.pending_relationships.remove(relationship)
+
     def remove_parent(self, parent_id):
         """ Remove parent """
         if self.parents_enabled and parent_id in self.parents:
-- 
2.43.0

